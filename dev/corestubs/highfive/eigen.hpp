#include "highfive.hpp"
