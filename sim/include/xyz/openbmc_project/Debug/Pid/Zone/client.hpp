#pragma once
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
