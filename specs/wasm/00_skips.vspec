#skipmod helpers
