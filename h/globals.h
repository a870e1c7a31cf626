#pragma once
#include "cp.h"
extern hup_handler_fn hup_fn;
extern void *hup_data;
