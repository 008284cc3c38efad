"""Stand-in for the part of pgmpy 0.1.12 that causalnex.network uses: tables counted from data, joint enumeration for prediction."""
