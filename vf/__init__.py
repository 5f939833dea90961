"""Harness binding the TLA+ specifications in ../specs to ngmix."""
