// Definitions of the string members the headers leave to the library, so that the analyses can see through them.
#include <string>
template class std::basic_string<char>;
