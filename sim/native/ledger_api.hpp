// A ledger kept in the library's own types: names, symbols, assets, times.
#pragma once
#include "native.hpp"

namespace ledger {
struct Qty { // an amount as it is given
   int         form = 0; // 0: made of numbers; 1: text; 2: json; 3: bytes; 4: number, and a symbol from text; 5: set into another
   int64_t     amount = 0;
   uint64_t    sym = 0, con = 0;
   std::string text;
};
enum What { ISSUE, BURN, TRANSFER, TIMES, SHARE, RATIO, NEGATE, COMPARE, SET, TOTAL, NAME, SYMBOL, CODE, TIME, STAMP, MIX, what_count };
struct Cmd {
   int      what = 0;
   uint64_t a = 0, b = 0; // names
   Qty      q, q2;
   int64_t  n = 0, m = 0;
   unsigned way = 0; // which of several ways to say the same
};
struct Line {
   uint64_t who, sym, con;
   int64_t  amount;
   bool operator==(const Line& x) const { return who == x.who && sym == x.sym && con == x.con && amount == x.amount; }
};
struct Book {
   virtual ~Book() {}
   // text about the result; `changed`: something was refused and did not leave its operands alone
   virtual api::R            apply(const Cmd&, bool& changed) = 0;
   virtual std::vector<Line> lines()                          = 0; // in the order of the ledger's own maps
};
Book* open();
} // namespace ledger
