/* The one function of macOS's <mach-o/dyld.h> that sys_path.cpp calls, for Linux. */
#pragma once
#include <stdint.h>
#include <unistd.h>

static inline int _NSGetExecutablePath(char* buf, uint32_t* size) {
	ssize_t n = readlink("/proc/self/exe", buf, *size - 1);
	if (n < 0) {
		return -1;
	}
	buf[n] = '\0';
	return 0;
}
