// C header import (C++/libclang) is outside what is encoded; programs under check do not use it.
#include "driver/c.h"
AstNode *importCHeader(CompilerDriver *driver, const AstNode *node, cstring name) { (void)driver; (void)node; (void)name; return NULL; }
void initCImporter(CompilerDriver *driver) { (void)driver; }
void deinitCImporter(CompilerDriver *driver) { (void)driver; }
