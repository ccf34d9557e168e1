#include "TH1D.h"
