#include HEADER
