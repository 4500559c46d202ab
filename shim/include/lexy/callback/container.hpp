#pragma once
#include <lexy/lexy_standin.hpp>
