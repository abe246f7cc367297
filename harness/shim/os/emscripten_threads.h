#include "emscripten.h"
#define __EMSCRIPTEN_PTHREADS__ 1
