// System headers the sources use (precompiled once; nothing of /repo is in here).
#include <map>
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <set>
#include <queue>
#include <list>
#include <stack>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdlib>
#include <algorithm>
#include <iomanip>
#include <tr1/unordered_map>
#include <boost/shared_ptr.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/unordered_map.hpp>
#include <boost/unordered_set.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/thread.hpp>
#include <boost/regex.hpp>
#include <boost/locale.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/range/begin.hpp>
#include <boost/range/end.hpp>
#include <boost/iostreams/filtering_streambuf.hpp>
#include <boost/iostreams/filter/gzip.hpp>
#include <boost/iostreams/copy.hpp>
#include <boost/bind.hpp>
#include <boost/algorithm/string/regex.hpp>
