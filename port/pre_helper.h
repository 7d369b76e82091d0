/* basiclog/src/helper.cpp includes <basicsys.h> alone, which needs the macros of <basiclog.h>. */
#include <basiclog.h>
