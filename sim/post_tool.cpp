// The post-processing program, callable. (It stays a main() to the compiler, which may end without a
// return statement.)
int main(int argc, char** argv) __asm__("post_main");
#include "tools/post_process.cxx"
