#include "TRandom3.h"
