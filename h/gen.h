// Generators shared by the properties.
#pragma once
#include "cp.h"

// text without NUL, CR, LF
std::string gen_text(Src &s, size_t maxlen);
// bytes biased towards IRC structure
std::string gen_raw(Src &s, size_t maxlen);
std::string lower_ascii(std::string s);
