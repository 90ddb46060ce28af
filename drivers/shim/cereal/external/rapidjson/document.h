// The library was written for the copy of rapidjson that cereal shipped; Debian's cereal uses the system one.
#pragma once
#include <rapidjson/document.h>
