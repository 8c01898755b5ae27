// Independent standard security handler (ISO 32000-1 7.6, ISO 32000-2 7.6),
// written from the specification; shares nothing with the library.
#pragma once
#include "ref.h"
namespace sec {
using ref::Val;
using std::string;
struct Handler
{
    int V = 0, R = 0; size_t n = 5;         // key length in bytes
    bool aes = false, meta = true;
    uint32_t P = 0;
    string O, U, OE, UE, Perms, id, key;
    // Reads an Encrypt dictionary; throws ref::Bad if it is not one the standard allows
    static Handler fromDict(const Val& d, const string& id0);
    // 0: neither, 1: user, 2: owner, 3: both. Sets key on success.
    int auth(const string& pw);
    // Fills O, U and so on and the key for a new file. seed varies the salts.
    void create(const string& user, const string& owner, int seed);
    Val dict() const;
    string objKey(int64_t num, int gen) const;
    string decrypt(const string& data, int64_t num, int gen) const;      // throws Bad
    string encrypt(const string& data, int64_t num, int gen, int seed) const;
    // Problems with the Perms string (R 5 and 6)
    string permsProblem() const;
};
string md5(const string& s);
string rc4(const string& key, const string& data);
string pad(const string& pw);
string sasl(const string& pw);      // what R5/R6 hash: UTF-8, normalised, cut to 127 bytes
// Passwords that the algorithm cannot tell apart
bool samePassword(int R, const string& a, const string& b);
// Decrypts strings and streams of a read file in place and then unpacks object
// streams. handler must be authenticated. encryptNum: the Encrypt object or 0.
void decryptFile(ref::File& f, const Handler& h, int64_t encryptNum);
}
