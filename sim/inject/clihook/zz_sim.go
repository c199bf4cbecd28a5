package main

import _ "github.com/transcriptaze/midiasm/zzsim/simk"
