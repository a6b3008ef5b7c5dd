// the multicanonical tool, compiled as applications do
#include "tools/multicanonical.cpp"
