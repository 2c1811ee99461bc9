#pragma once
#include <boost/serialization/serialization.hpp>
