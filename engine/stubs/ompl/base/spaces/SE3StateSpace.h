#pragma once
#include "ompl/all.hpp"
