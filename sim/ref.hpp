// Executable reference model: what the programs are documented to compute, written independently of their code.
#pragma once
#include "scn.hpp"

struct ReaderOpts { int md5 = 0, hex = 0; }; // 0 off, 1 auto, 2 force
// occurrences of every password hash in one user:password file
void refCount(const std::string &content, ReaderOpts o, Counts &c);
std::vector<std::string> refPasswords(const std::string &content, bool autoHex); // in order
std::vector<std::string> refLines(const std::string &content); // as std::getline sees them, incl. the attempt that hits the end
char refSeparator(const std::string &content);
bool refPassword(const std::string &line, char sep, std::string &pwd);
std::string dbOf(const Counts &c);
// checks one output file: multiple of 20, strictly ascending, positive counts; adds the counts. "" if fine
std::string checkDb(const std::string &data, Counts *sum);
std::string diffCounts(const Counts &want, const Counts &got);
std::string over(const Counts &limit, const Counts &got); // "" if got <= limit everywhere
void addComplete(const std::string &data, Counts &sum);   // counts of all complete records
std::string joinLines(const std::vector<std::string> &lines, bool finalNewline);
std::string genPassword(Rng &r);
std::string genRawPassword(Rng &r); // as genPassword, now and then with arbitrary bytes (no line ends)
std::string safe(const std::string &);
void damage(std::string &data, const std::string &how);  // h_dmg.cpp
std::string genDamage(Rng &r, bool text);
