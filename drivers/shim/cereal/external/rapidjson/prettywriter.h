#pragma once
#include <rapidjson/prettywriter.h>
