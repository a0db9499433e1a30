#pragma once
#include "detail_all.hpp"
