#pragma once
#include <simbus.hpp>
