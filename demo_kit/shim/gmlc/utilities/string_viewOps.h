#pragma once
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities::string_viewOps {
inline constexpr std::string_view whiteSpaceCharacters(" \t\n\r\0\v\f", 7);
inline constexpr std::string_view default_delim_chars(",;");
inline constexpr std::string_view default_quote_chars("'\"`");
inline constexpr std::string_view default_bracket_chars("[{(<'\"`");
using string_viewVector = std::vector<std::string_view>;
enum class delimiter_compression { on, off };
void trimString(std::string_view& input, std::string_view trimCharacters = whiteSpaceCharacters);
std::string_view trim(std::string_view input, std::string_view trimCharacters = whiteSpaceCharacters);
std::string_view removeQuotes(std::string_view str);
std::string_view merge(std::string_view s1, std::string_view s2);
string_viewVector split(std::string_view str, char delim = ',');
string_viewVector splitline(std::string_view line,
                            std::string_view delimiters = default_delim_chars,
                            delimiter_compression compression = delimiter_compression::off);
string_viewVector splitline(std::string_view line,
                            char delim,
                            delimiter_compression compression = delimiter_compression::off);
string_viewVector splitlineQuotes(std::string_view line,
                                  std::string_view delimiters = default_delim_chars,
                                  std::string_view quoteChars = default_quote_chars,
                                  delimiter_compression compression = delimiter_compression::off);
string_viewVector splitlineBracket(std::string_view line,
                                   std::string_view delimiters = default_delim_chars,
                                   std::string_view bracketChars = default_bracket_chars,
                                   delimiter_compression compression = delimiter_compression::off);
}  // namespace gmlc::utilities::string_viewOps
