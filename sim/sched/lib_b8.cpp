#include "../inst_b8.cpp"
