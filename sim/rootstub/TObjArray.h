#include "TypesStub.h"
