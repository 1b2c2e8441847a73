"""e2sa: a static analyser for the e2cnn code base (never imports or runs e2cnn)."""
