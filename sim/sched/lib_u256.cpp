#include "../inst_u256.cpp"
