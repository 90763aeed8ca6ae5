// bodies of std::string from the installed libstdc++ headers (the library ships them only as machine code)
#include <string>
template class std::basic_string<char>;
