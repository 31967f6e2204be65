#pragma once
#include <boost/assert.hpp>
