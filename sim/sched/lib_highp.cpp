#include "../inst_highp.cpp"
