// Package copystructure is a stand-in: deep copy of generic yaml data.
package copystructure

// Copy makes a deep copy.
func Copy(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case map[string]interface{}:
		r := make(map[string]interface{}, len(x))
		for k, e := range x {
			c, err := Copy(e)
			if err != nil {
				return nil, err
			}
			r[k] = c
		}
		return r, nil
	case []interface{}:
		r := make([]interface{}, len(x))
		for i, e := range x {
			c, err := Copy(e)
			if err != nil {
				return nil, err
			}
			r[i] = c
		}
		return r, nil
	}
	return v, nil
}
