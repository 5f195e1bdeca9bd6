// Stand-in for the header of the external crc library, which is not part of /repo and is not
// installed here.  packet.hpp declares the concept it needs itself.
#pragma once
