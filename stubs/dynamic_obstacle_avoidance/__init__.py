"""Stand-in for hubernikus/dynamic_obstacle_avoidance (absent in the sandbox)."""
