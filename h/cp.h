// The code under test, as C headers seen from C++.
#pragma once
#include "engine.h"
#include <algorithm>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <unistd.h>
#include <ctime>
#include <glib.h>
#include <gmodule.h>
#define virtual virtual_
#define explicit explicit_
#define __CTRLPROXY_ADMIN_H__   // a typedef C++ does not accept; not needed
extern "C" {
struct admin_handle;
#include "config.h"
#include "log.h"
#include "internals.h"
#include "irc.h"
#include "ssl.h"
#include "redirect.h"
#include "help.h"
#include "keyfile.h"
#include "url.h"
}
#undef virtual
#undef explicit
#undef free
#undef malloc
#undef strdup
#undef calloc
#undef realloc

typedef std::vector<std::string> Strs;

inline std::string take(char *s) { std::string r(s ? s : "(null)"); g_free(s); return r; }
inline std::string S(const char *s) { return s ? s : ""; }
