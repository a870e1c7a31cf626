#include "cp.h"
#include "globals.h"
hup_handler_fn hup_fn;
void *hup_data;
extern "C" {
// main.c owns this in the real program
__attribute__((weak)) void register_hup_handler(hup_handler_fn fn, void *d) { hup_fn = fn; hup_data = d; }
}
