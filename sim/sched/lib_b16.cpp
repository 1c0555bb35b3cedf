#include "../inst_b16.cpp"
