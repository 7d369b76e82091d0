// The project's headers, in the order its own sources include them.
#pragma once
#ifdef MC_IMG
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/imgcodecs.hpp>
using namespace cv;
#endif
#include <basiclog.h>
using namespace basiclog;
#include <basicsys.h>
using namespace basicsys;
#ifdef MC_MATH
#include <basicmath.h>
using namespace basicmath;
#endif
#ifdef MC_IMG
#include <basicimg.h>
using namespace basicimg;
#endif
