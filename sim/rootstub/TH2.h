#include "TH2D.h"
