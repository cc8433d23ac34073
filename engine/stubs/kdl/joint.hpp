#pragma once
#include "kdl/tree.hpp"
