#include "replay_c13.cpp"
