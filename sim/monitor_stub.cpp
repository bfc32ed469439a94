#include "monitor.hpp"
namespace vsim { void monBegin() {} bool monPresent = false; }
