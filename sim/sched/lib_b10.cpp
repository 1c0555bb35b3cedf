#include "../inst_b10.cpp"
