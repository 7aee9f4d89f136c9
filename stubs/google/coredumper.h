extern "C" int WriteCoreDump(const char*);
