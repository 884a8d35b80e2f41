package main

import "os"

// The checks of the logs and of independence need no codecs.
func codecMode([]string) { os.Exit(3) }
