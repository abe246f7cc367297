/* Replaces the coprocessor-reading assembly of the library header of the same name */
#include <stdint.h>
extern uint32_t venv_read_fpsid(void);
extern uint32_t venv_read_mvfr0(void);
extern uint32_t venv_read_wcid(void);
static inline uint32_t read_fpsid(void) {
	return venv_read_fpsid();
}
static inline uint32_t read_mvfr0(void) {
	return venv_read_mvfr0();
}
static inline uint32_t read_wcid(void) {
	return venv_read_wcid();
}
