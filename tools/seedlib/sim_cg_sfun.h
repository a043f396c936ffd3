/* minimal stand-in */
