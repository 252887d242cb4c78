#include "Engabra"
int main() { return 0; }
