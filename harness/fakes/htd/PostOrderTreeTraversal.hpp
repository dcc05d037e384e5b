#pragma once
#include "htd/main.hpp"
