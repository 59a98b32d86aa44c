"""Runtime monitors for openptv/postptv (flowtracks)."""
