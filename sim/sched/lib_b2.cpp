#include "../inst_b2.cpp"
