#pragma once
#include <vector>

struct vp_case {
	const char* m_name;
	void (*m_run)();
};

std::vector<vp_case>& vp_cases();

struct vp_register {
	vp_register(const char* name, void (*run)()) {
		vp_case c = {name, run};
		vp_cases().push_back(c);
	}
};
