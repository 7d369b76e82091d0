#pragma once
#include <string>
#include <vector>
namespace cv_stub {
struct Written { std::string name; int rows, cols, channels; std::vector<unsigned char> data; };
extern std::vector<Written> written;
extern bool fail_write;
extern int read_kind, resize_kind;   // how the last picture was read and resized
}
