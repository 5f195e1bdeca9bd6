/* the analysed code uses no library stub list; present so that the host's C headers can be read for another target */
