#pragma once
int emscripten_num_logical_cores(void);
