#include "HDiffPatch/stub.h"
