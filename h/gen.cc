#include "gen.h"

std::string gen_text(Src &s, size_t maxlen)
{
	static const std::vector<std::string> frag = {"a", "b", " ", ":", "hello", "\x01", "ACTION", ",", "#", "\xc3\xa9", "\xff", "\x80", "!", "@", "  ", " :", "0", "%s", "\\", "*", "x y", "\x02", "\t", "~", "|", "^", "[", "{"};
	size_t n = s.range(maxlen + 1);
	std::string r;
	while (r.size() < n) {
		uint32_t k = s.range(40);
		if (k < frag.size()) r += frag[k];
		else { uint8_t b = s.byte(); if (b && b != '\r' && b != '\n') r += (char)b; else r += 'z'; }
	}
	return r;
}

std::string gen_raw(Src &s, size_t maxlen)
{
	std::string r;
	size_t n = s.range(maxlen + 1);
	while (r.size() < n) {
		switch (s.range(6)) {
		case 0: r += ' '; break;
		case 1: r += ':'; break;
		case 2: { uint8_t b = s.byte(); r += b ? (char)b : 'n'; break; }
		case 3: r += gen_text(s, 5); break;
		case 4: r += "word"; break;
		case 5: if (s.chance(1, 6)) r += s.chance(1, 2) ? "\r" : "\n"; else r += "p"; break;
		}
	}
	return r;
}

std::string lower_ascii(std::string s)
{
	for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32;
	return s;
}
