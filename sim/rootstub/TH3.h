#include "TH3D.h"
