#include "TTree.h"
