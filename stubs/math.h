#pragma once
#include "vc_std.hpp"
