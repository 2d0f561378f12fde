#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities {
std::string base64_encode(void const* bytes_to_encode, size_t size);
std::string base64_encode(std::string_view string_to_encode);
size_t base64_decode(std::string_view encoded_string, void* data, size_t max_size);
std::vector<unsigned char> base64_decode(std::string_view encoded_string, size_t offset = 0);
std::string base64_decode_to_string(std::string_view encoded_string, size_t offset = 0);
}  // namespace gmlc::utilities
