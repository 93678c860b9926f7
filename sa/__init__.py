"""Static analysis framework specific to sfepy: front ends and rules."""
