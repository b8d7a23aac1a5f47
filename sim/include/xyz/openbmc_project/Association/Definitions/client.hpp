#pragma once
#include <xyz/openbmc_project/Association/Definitions/common.hpp>
